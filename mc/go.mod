module verifmc

go 1.24.0

require (
	github.com/apache/datasketches-go v0.0.0
	github.com/twmb/murmur3 v1.1.8
	github.com/cespare/xxhash/v2 v2.3.0
)

replace github.com/apache/datasketches-go => /repo
