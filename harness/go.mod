module vh

go 1.25

require github.com/infobloxopen/go-trees v0.0.0

require gopkg.in/yaml.v2 v2.4.0 // indirect

require vsched v0.0.0

replace vsched => ./vsched

replace github.com/infobloxopen/go-trees => /repo
