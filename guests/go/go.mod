module guest
go 1.23
