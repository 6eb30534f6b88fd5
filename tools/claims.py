NA = {}
C["C13"] = ("online monitor comparing every RVFI report with the reference model's record of the same instruction", LOCKNOTE)
DIFFNOTE = ("Exploration by runtime monitoring of several instances of the elaborated core side by side; needs no reference model. Trusts the netlist "
            "compiler (cross-validated every run against Amaranth's simulator).")
C["C10"] = ("differential trace monitor: one program under several bus timings and noise patterns", DIFFNOTE)
C["C14"] = ("cycle-by-cycle differential monitor of plain and instrumented configurations", DIFFNOTE)
C["C15"] = ("cycle-by-cycle differential monitor of gated and ungated instances", DIFFNOTE)
C["C16"] = ("generated-source monitor: simulated ROM outputs, attributes and files compared with the denotation of the source",
            "Exploration over random microcode sources plus the shipped one, judged by construction and by an independent mini-assembler. Trusts Amaranth's simulator; sources m5meta refuses are outside.")
C["C17"] = ("differential execution of the generated Verilog (Yosys/CXXRTL) beside the Amaranth netlist, all outputs every cycle",
            "Exploration by co-execution; trusts Yosys' Verilog front end and CXXRTL, and the netlist compiler (cross-validated every run).")
BLK = ("Exploration by runtime monitoring of each component alone under random and corner sequences; looks only at what the documentation fixes. "
       "Trusts the netlist compiler (cross-validated against Amaranth's simulator by the other checks).")
C["C18"] = ("online contract monitors on every datapath component driven stand-alone (ALU at ten widths)", BLK)
C["C19"] = ("online contract monitors on decoder, CSR table, exception router and control unit driven stand-alone; thorough tier decodes all 2^32 words; random microprograms", BLK)
C["C20"] = ("online monitor of probe components exposing every accessor, on random, corner and (thorough) all 2^32 words; enumerations compared with the specification's numbers",
            "Exploration by runtime monitoring of small probe designs; the thorough tier executes every 32-bit word through every accessor. Trusts the netlist compiler.")
C["C21"] = ("cycle-by-cycle differential monitor of multi-core designs, built after random construction histories, against lone cores from fresh processes", DIFFNOTE)
C["C22"] = ("online monitors on the example SoC's Wishbone peripherals (bus scoreboard, bit-timed serial line checker, tick accounting) and on the pins of the whole SoC",
            "Exploration by runtime monitoring. The Wishbone decoder and memory map of amaranth-soc are stood in for; the CSR-bus variant and the board builds cannot be elaborated offline. Trusts the netlist compiler.")
