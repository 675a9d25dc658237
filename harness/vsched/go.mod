module vsched

go 1.21
