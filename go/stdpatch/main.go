// Command stdpatch writes patched copies of a few standard library files and a
// "go build -overlay" file naming them. The patches only give the simulator
// seams that the standard library keeps closed:
//
//	wasm: permission bits travel between the program and the simulated kernel
//	      (WASI itself has none);
//	race: the native run queue is first-in first-out also under the race
//	      detector, and the runtime's random seed is a constant, so that the
//	      order in which goroutines run is decided by the seeded scheduling
//	      points alone.
//
//	stdpatch -kind wasm|race -out DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type patch struct {
	file string
	subs [][2]string
	tail string
}

var patches = map[string][]patch{
	"wasm": {
		{
			file: "syscall/fs_wasip1.go",
			subs: [][2]string{
				{"\tif st.Filetype == FILETYPE_DIRECTORY {\n\t\tst.Mode = 0700\n\t} else {\n\t\tst.Mode = 0600\n\t}\n", "\t// simulated kernel: st.Mode was filled in by the host\n"},
				{"\tvar fd int32\n\terrno := path_open(\n", "\tsim_perm(perm)\n\tvar fd int32\n\terrno := path_open(\n"},
				{"\terrno := path_create_directory(dirFd, pathPtr, pathLen)\n", "\tsim_perm(perm)\n\terrno := path_create_directory(dirFd, pathPtr, pathLen)\n"},
				{"func Chmod(path string, mode uint32) error {\n\tvar stat Stat_t\n\treturn Stat(path, &stat)\n", "func Chmod(path string, mode uint32) error {\n\tif path == \"\" {\n\t\treturn EINVAL\n\t}\n\tdirFd, pathPtr, pathLen := preparePath(path)\n\treturn errnoErr(Errno(sim_chmod(dirFd, uint32(uintptr(unsafe.Pointer(pathPtr))), uint32(pathLen), mode)))\n"},
				{"func Fchmod(fd int, mode uint32) error {\n\tvar stat Stat_t\n\treturn Fstat(fd, &stat)\n", "func Fchmod(fd int, mode uint32) error {\n\treturn errnoErr(Errno(sim_fchmod(int32(fd), mode)))\n"},
			},
			tail: `
//go:wasmimport sim perm
//go:noescape
func sim_perm(mode uint32)

//go:wasmimport sim chmod
//go:noescape
func sim_chmod(dirFd int32, path uint32, pathLen uint32, mode uint32) uint32

//go:wasmimport sim fchmod
//go:noescape
func sim_fchmod(fd int32, mode uint32) uint32
`,
		},
		{
			file: "os/stat_wasip1.go",
			subs: [][2]string{
				{"\tif fs.sys.Filetype == syscall.FILETYPE_DIRECTORY {\n\t\tfs.mode |= 0700\n\t} else {\n\t\tfs.mode |= 0600\n\t}\n", "\tfs.mode |= FileMode(fs.sys.Mode & 0777)\n"},
			},
		},
	},
	"race": {
		{
			file: "runtime/proc.go",
			subs: [][2]string{
				{"const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n"},
			},
		},
		{
			file: "runtime/rand.go",
			subs: [][2]string{
				{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
			},
		},
	},
}

func main() {
	kind := flag.String("kind", "", "wasm or race")
	out := flag.String("out", "", "directory for the patched files")
	flag.Parse()
	ps, ok := patches[*kind]
	if !ok {
		fatal(fmt.Errorf("unknown kind %q", *kind))
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		fatal(err)
	}
	root := filepath.Join(strings.TrimSpace(string(b)), "src")
	ov := struct{ Replace map[string]string }{map[string]string{}}
	for i, p := range ps {
		name := filepath.Join(root, p.file)
		src, err := os.ReadFile(name)
		if err != nil {
			fatal(err)
		}
		text := string(src)
		for _, s := range p.subs {
			if strings.Count(text, s[0]) != 1 {
				fatal(fmt.Errorf("%s: no unique match for %q", p.file, s[0]))
			}
			text = strings.Replace(text, s[0], s[1], 1)
		}
		dst := filepath.Join(*out, fmt.Sprintf("%s%02d_%s", *kind, i, filepath.Base(p.file)))
		if err := os.WriteFile(dst, []byte(text+p.tail), 0o644); err != nil {
			fatal(err)
		}
		ov.Replace[name] = dst
	}
	b, _ = json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(filepath.Join(*out, *kind+"-std.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "stdpatch:", err)
	os.Exit(2)
}
