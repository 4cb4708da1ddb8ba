module github.com/natessilva/dag

go 1.16
