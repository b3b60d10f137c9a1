module github.com/square/certstrap

go 1.13
