module verif

go 1.25

require github.com/cespare/goclj v0.0.0

replace github.com/cespare/goclj => /repo
