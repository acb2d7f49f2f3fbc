module vh

go 1.13

require (
	github.com/deckarep/golang-set v1.7.1
	github.com/go-sql-driver/mysql v1.5.0
	github.com/pkg/errors v0.9.1
	github.com/pmezard/go-difflib v1.0.0
	github.com/stretchr/testify v1.6.1
)

require github.com/schemalex/schemalex v0.0.0

replace github.com/schemalex/schemalex => /repo
