module verifmc
go 1.23
require github.com/jchv/cleansheets v0.0.0
replace github.com/jchv/cleansheets => /repo
