module simgen

go 1.26
