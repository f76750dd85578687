module verifharness

go 1.24

require github.com/netascode/xmldot v0.0.0

replace github.com/netascode/xmldot => /repo
