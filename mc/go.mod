module mc

go 1.23

require github.com/dragmz/teal v0.0.0

replace github.com/dragmz/teal => /repo

require (
	github.com/algorand/go-algorand-sdk v1.24.0 // indirect
	github.com/algorand/go-codec/codec v1.1.9 // indirect
	github.com/dragmz/abs v0.0.0-20221120174236-615259d8ebd1 // indirect
	github.com/google/go-querystring v1.1.0 // indirect
	github.com/joe-p/tealfmt v0.0.0-20221219211223-cec2ea891d52 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/samber/lo v1.37.0 // indirect
	golang.org/x/crypto v0.4.0 // indirect
	golang.org/x/exp v0.0.0-20221217163422-3c43f8badb15 // indirect
)
