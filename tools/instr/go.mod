module zvinstr

go 1.21
