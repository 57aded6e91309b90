A["C01"] = ["positions are valid; iterator ranges are not ranges of the vector itself and their iterators are random access iterators"]
A["C02"] = ["element moves and destructors do not throw; an insertion of several elements whose copies throw in the middle is not covered (it leaves the vector in a state which may only be destroyed at risk: see the findings in DESIGN.md)"]
A["C03"] = A["C01"]
A["C04"] = A["C02"] + ["move assignment between vectors hands over the allocator whatever its propagation traits say, as the code documents by doing so for every allocator"]
A["C05"] = ["positions are valid; iterator ranges are not ranges of the vector itself and their iterators are random access iterators", "element types are trivial and aligned to at most 128"]
A["C06"] = A["C05"]
A["C09"] = ["indices are below the size, ranges of copies lie in both bitsets"]
A["C11"] = ["destructors do not throw; moves between anys with unequal stateful allocators are the known finding"]
