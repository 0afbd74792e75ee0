module translate

go 1.24
