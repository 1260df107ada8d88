module verif/sim

go 1.17

require (
	github.com/ElrondNetwork/arwen-wasm-vm/v1_3 v1.3.0
	github.com/ElrondNetwork/big-int-util v0.1.0
	github.com/ElrondNetwork/elrond-go-logger v1.0.4
	github.com/ElrondNetwork/elrond-vm-common v1.0.1-0.20210713105939-b6bc55e23cc0
	golang.org/x/crypto v0.0.0-20200622213623-75b288015ac9
)

require (
	github.com/btcsuite/btcd v0.21.0-beta // indirect
	github.com/gin-contrib/sse v0.1.0 // indirect
	github.com/gin-gonic/gin v1.7.1 // indirect
	github.com/go-playground/locales v0.13.0 // indirect
	github.com/go-playground/universal-translator v0.17.0 // indirect
	github.com/go-playground/validator/v10 v10.4.1 // indirect
	github.com/gogo/protobuf v1.3.2 // indirect
	github.com/golang/protobuf v1.5.2 // indirect
	github.com/herumi/bls-go-binary v0.0.0-20200324054641-17de9ae04665 // indirect
	github.com/leodido/go-urn v1.2.0 // indirect
	github.com/mattn/go-isatty v0.0.12 // indirect
	github.com/mitchellh/mapstructure v1.4.1 // indirect
	github.com/ugorji/go/codec v1.1.7 // indirect
	golang.org/x/sys v0.0.0-20200930185726-fdedc70b468f // indirect
	google.golang.org/protobuf v1.26.0 // indirect
	github.com/pelletier/go-toml v1.9.0 // indirect
	gopkg.in/yaml.v2 v2.2.8 // indirect
)

replace github.com/ElrondNetwork/arwen-wasm-vm/v1_3 => /repo
