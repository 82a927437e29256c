module verifmc

go 1.23

require github.com/senghoo/modsecurity-go v0.0.0

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/konsorten/go-windows-terminal-sequences v1.0.1 // indirect
	github.com/sirupsen/logrus v1.4.2 // indirect
	github.com/timtadh/data-structures v0.5.3 // indirect
	github.com/timtadh/lexmachine v0.2.2 // indirect
	golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect
)

replace github.com/senghoo/modsecurity-go => /repo
