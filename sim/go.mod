module verifsim

go 1.25

require github.com/google/uuid v1.3.0
