module instr

go 1.14
