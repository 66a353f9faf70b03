module github.com/unidoc/unitype/verifharness

go 1.18

require (
	github.com/sirupsen/logrus v1.9.3
	github.com/unidoc/unitype v0.0.0
)

require (
	golang.org/x/sys v0.29.0 // indirect
	golang.org/x/text v0.21.0 // indirect
)

replace github.com/unidoc/unitype => /repo
