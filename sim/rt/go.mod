module simrt

go 1.18
