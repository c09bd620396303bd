module verif

go 1.23

require (
	github.com/openshift-online/ocm-api-metamodel v0.0.0
	pgregory.net/rapid v1.3.0
	vlib v0.0.0
)

require (
	github.com/antlr/antlr4/runtime/Go/antlr v0.0.0-20211106181442-e4c1a74c66bd // indirect
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)

replace github.com/openshift-online/ocm-api-metamodel => /repo

replace vlib => ../lib
