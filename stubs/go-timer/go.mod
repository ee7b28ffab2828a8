module github.com/singchia/go-timer/v2

go 1.17
