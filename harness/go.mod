module verif

go 1.23

require github.com/signintech/pdft v0.0.0

replace github.com/signintech/pdft => /repo
