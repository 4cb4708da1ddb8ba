module golang.org/x/sync

go 1.16
