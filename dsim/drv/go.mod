module dsim.test/drv

go 1.24
