module verif/harness

go 1.23

require (
	github.com/jackc/pgx/v5 v5.1.1
	github.com/lib/pq v1.10.4
	github.com/ulule/loukoum/v3 v3.0.0
)

require github.com/pkg/errors v0.9.1 // indirect

replace github.com/ulule/loukoum/v3 => /repo
