module verifinstrument

go 1.23
