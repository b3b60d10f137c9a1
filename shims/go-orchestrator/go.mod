module code.cloudfoundry.org/go-orchestrator

go 1.13
