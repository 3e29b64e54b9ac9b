module instr

go 1.18
