module mutate
go 1.24
