module gostverif

go 1.21

require github.com/myyrakle/gost v0.0.0

replace github.com/myyrakle/gost => /repo
