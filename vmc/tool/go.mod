module vmctool

go 1.24
