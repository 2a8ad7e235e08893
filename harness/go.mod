module vharness

go 1.20

require github.com/mattn/go-sqlite3 v1.14.7
