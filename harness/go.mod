module verif/harness

go 1.23.0

require (
	github.com/dogmatiq/dapper v0.6.0
	github.com/dogmatiq/configkit v0.16.0
	github.com/dogmatiq/dogma v0.15.0
	github.com/dogmatiq/enginekit v0.16.1
	github.com/dogmatiq/testkit v0.0.0
	google.golang.org/protobuf v1.36.6
)

require (
	github.com/dogmatiq/cosyne v0.2.0 // indirect
	github.com/dogmatiq/iago v0.4.0 // indirect
	github.com/dogmatiq/jumble v0.1.0 // indirect
	github.com/dogmatiq/linger v1.1.0 // indirect
	github.com/sergi/go-diff v1.3.1 // indirect
	go.uber.org/multierr v1.11.0 // indirect
	golang.org/x/text v0.24.0 // indirect
)

replace github.com/dogmatiq/testkit => /repo
