module verifrewrite

go 1.21
