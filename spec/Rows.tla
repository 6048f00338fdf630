-------------------------------- MODULE Rows --------------------------------
(* Sizes of the component types the harness is compiled with; which sets of  *)
(* them must be accepted by a store that keeps a row in a page.              *)
EXTENDS Integers, FiniteSets

PageBytes == 16384
Size == <<4, 8, 64, 1500, 3000, 4, 6, 8, 12, 16, 5, 4, 24, 32, 10, 40, 7,
          16384, 16388, 9000, 128, 4096, 8192, 700, 5461, 48, 8000, 8000, 8000, 5300, 5300, 5300, 4000, 4000, 4000,
          1092, 1092, 1092, 1088, 1088, 1092, 5440, 5440, 512, 1024,
          1, 2, 3, 2,
          4, 2, 12, 4, 1, 16, 4, 8, 4, 2, 12, 4, 1, 16, 4, 8,
          4, 2, 12, 4, 1, 16, 4, 8, 4, 2, 12, 4, 1, 16, 4, 8,
          4, 2, 12, 4, 1, 16, 4, 8, 4, 2, 12, 4, 1, 16, 4, 8,
          4, 2, 12, 4, 1, 16, 4, 8, 4, 2, 12, 4, 1, 16, 4, 8>>
Align == <<4, 8, 64, 1, 4, 1, 2, 8, 4, 16, 1, 4, 8, 32, 2, 4, 1, 1, 4,
           4, 128, 4096, 8192, 4, 1, 16, 1, 8, 4, 4, 1, 2, 8, 4, 1, 1, 2, 4,
           64, 64, 1, 1, 1, 512, 1024, 1, 1, 1, 2, 1, 2, 4, 2, 1, 16, 4, 8,
           1, 2, 4, 2, 1, 16, 4, 8, 1, 2, 4, 2, 1, 16, 4, 8, 1, 2, 4,
           2, 1, 16, 4, 8, 1, 2, 4, 2, 1, 16, 4, 8, 1, 2, 4, 2, 1, 16,
           4, 8, 1, 2, 4, 2, 1, 16, 4, 8, 1, 2, 4, 2, 1, 16, 4, 8>>
(* every component fits into its equal share of the page: such a set must be accepted *)
MustFit(S) == \A c \in S : Size[c] <= PageBytes \div Cardinality(S) - 8
=============================================================================
