module github.com/cloudfoundry/gosigar

go 1.13
