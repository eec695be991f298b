module verifsimrt

go 1.23
