module github.com/emirpasic/gods

go 1.13
