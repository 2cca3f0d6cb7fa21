module goverus

go 1.23
