module github.com/binance-chain/tss-lib

go 1.19
