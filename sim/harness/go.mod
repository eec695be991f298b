module verifharness

go 1.23

require github.com/jtejido/linear v0.0.0

require verifsimrt v0.0.0

replace github.com/jtejido/linear => ../../.build/linear

replace verifsimrt => ../simrt
