module verifharness

go 1.21

require (
	github.com/DataDog/zstd v1.5.5
	github.com/ProtonMail/go-crypto v1.0.0
	github.com/klauspost/compress v1.17.8
	github.com/stretchr/testify v1.9.0
	github.com/ulikunitz/xz v0.5.12
	go.uber.org/goleak v1.3.0
	golang.org/x/sys v0.28.0
)

require (
	github.com/cloudflare/circl v1.3.8 // indirect
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/kr/text v0.2.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	golang.org/x/crypto v0.31.0 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require github.com/sassoftware/go-rpmutils v0.0.0

replace github.com/sassoftware/go-rpmutils => /repo
