module verif
go 1.18
require github.com/arr-ai/wbnf v0.0.0
replace github.com/arr-ai/wbnf => /repo
require (
	github.com/arr-ai/frozen v1.4.0
	github.com/iancoleman/strcase v0.2.0
	github.com/sirupsen/logrus v1.9.0
	github.com/stretchr/testify v1.8.0
	github.com/urfave/cli v1.22.10
)

require (
	github.com/arr-ai/hash v0.8.0 // indirect
	github.com/cpuguy83/go-md2man/v2 v2.0.2 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/go-errors/errors v1.4.2 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/rogpeppe/go-internal v1.9.0 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	golang.org/x/exp v0.0.0-20220907003533-145caa8ea1d0 // indirect
	golang.org/x/sys v0.0.0-20220906165534-d0df966e6959 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
