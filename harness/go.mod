module verif

go 1.23

require github.com/sa6mwa/krypto431 v0.0.0

replace github.com/sa6mwa/krypto431 => /repo
require (
	github.com/AlecAivazis/survey/v2 v2.3.7
	github.com/jung-kurt/gofpdf v1.16.2
	github.com/nknorg/encrypted-stream v1.0.1
	github.com/sa6mwa/blox v0.1.4
	github.com/sa6mwa/dtg v0.1.1
	github.com/stretchr/testify v1.8.4
	github.com/urfave/cli/v2 v2.27.1
	github.com/wagslane/go-password-validator v0.3.0
	golang.org/x/crypto v0.17.0
	golang.org/x/term v0.15.0
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.3 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/imdario/mergo v0.3.16 // indirect
	github.com/kballard/go-shellquote v0.0.0-20180428030007-95032a82bc51 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	github.com/mgutz/ansi v0.0.0-20200706080929-d51e80ef957d // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	github.com/stretchr/objx v0.5.1 // indirect
	github.com/xrash/smetrics v0.0.0-20231213231151-1d8dd44e695e // indirect
	golang.org/x/sys v0.15.0 // indirect
	golang.org/x/text v0.14.0 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
