module verifmc

go 1.21

require (
	github.com/pa-m/randomkit v0.0.0-20191001073902-db4fd80633df
	github.com/pa-m/sklearn v0.0.0
	golang.org/x/exp v0.0.0-20191129062945-2f5052295587
	gonum.org/v1/gonum v0.6.1
)

require (
	github.com/chewxy/math32 v1.0.4 // indirect
	github.com/pa-m/optimize v0.0.0-20190612075243-15ee852a6d9a // indirect
	golang.org/x/tools v0.0.0-20200225230052-807dcd883420 // indirect
)

replace github.com/pa-m/sklearn => /repo
