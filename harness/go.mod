module verifharness

go 1.25

require (
	github.com/tg123/phabrik v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/sigurn/crc8 v0.0.0-20220107193325-2243fe600f9f // indirect

replace github.com/tg123/phabrik => /repo
