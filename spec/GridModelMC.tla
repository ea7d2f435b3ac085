------------------------------ MODULE GridModelMC ------------------------------
EXTENDS GridModel
L1 == <<-2>>
H1 == <<4>>
L2 == <<-1, 2>>
H2 == <<1, 5>>
L3 == <<-2, 0, 1>>
H3 == <<0, 1, 3>>
L4 == <<-1, 0, 2, -3>>
H4 == <<0, 2, 3, -1>>
================================================================================
