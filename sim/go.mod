module vsim

go 1.24

require gotor v0.0.0

replace gotor => ./gotor
