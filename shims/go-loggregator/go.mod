module code.cloudfoundry.org/go-loggregator

go 1.13
