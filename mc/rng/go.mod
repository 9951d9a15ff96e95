module github.com/leesper/go_rng

go 1.16
