module verif.local/tools

go 1.25
