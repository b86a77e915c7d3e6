module github.com/continusec/objecthash

go 1.23.0

require golang.org/x/text v0.27.0
