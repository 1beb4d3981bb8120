------------------------------- MODULE Elements -------------------------------
(* The elements in order of their atomic number, with the standard atomic masses (10^-3; 0: no stable isotope).  A crystal is given by symbols, by numbers or by masses: the rest follows. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Table == <<
   <<"H", 1008>>, <<"He", 4003>>, <<"Li", 6941>>, <<"Be", 9012>>, <<"B", 10811>>, <<"C", 12011>>, <<"N", 14007>>, <<"O", 15999>>,
   <<"F", 18998>>, <<"Ne", 20180>>, <<"Na", 22990>>, <<"Mg", 24305>>, <<"Al", 26982>>, <<"Si", 28086>>, <<"P", 30974>>, <<"S", 32065>>,
   <<"Cl", 35453>>, <<"Ar", 39948>>, <<"K", 39098>>, <<"Ca", 40078>>, <<"Sc", 44956>>, <<"Ti", 47867>>, <<"V", 50942>>, <<"Cr", 51996>>,
   <<"Mn", 54938>>, <<"Fe", 55845>>, <<"Co", 58933>>, <<"Ni", 58693>>, <<"Cu", 63546>>, <<"Zn", 65380>>, <<"Ga", 69723>>, <<"Ge", 72640>>,
   <<"As", 74922>>, <<"Se", 78960>>, <<"Br", 79904>>, <<"Kr", 83798>>, <<"Rb", 85468>>, <<"Sr", 87620>>, <<"Y", 88906>>, <<"Zr", 91224>>,
   <<"Nb", 92906>>, <<"Mo", 95960>>, <<"Tc", 0>>, <<"Ru", 101070>>, <<"Rh", 102906>>, <<"Pd", 106420>>, <<"Ag", 107868>>, <<"Cd", 112411>>,
   <<"In", 114818>>, <<"Sn", 118710>>, <<"Sb", 121760>>, <<"Te", 127600>>, <<"I", 126904>>, <<"Xe", 131293>>, <<"Cs", 132905>>, <<"Ba", 137327>>,
   <<"La", 138905>>, <<"Ce", 140116>>, <<"Pr", 140908>>, <<"Nd", 144242>>, <<"Pm", 0>>, <<"Sm", 150360>>, <<"Eu", 151964>>, <<"Gd", 157250>>,
   <<"Tb", 158925>>, <<"Dy", 162500>>, <<"Ho", 164930>>, <<"Er", 167259>>, <<"Tm", 168934>>, <<"Yb", 173054>>, <<"Lu", 174967>>, <<"Hf", 178490>>,
   <<"Ta", 180948>>, <<"W", 183840>>, <<"Re", 186207>>, <<"Os", 190230>>, <<"Ir", 192217>>, <<"Pt", 195084>>, <<"Au", 196967>>, <<"Hg", 200590>>,
   <<"Tl", 204383>>, <<"Pb", 207200>>, <<"Bi", 208980>>, <<"Po", 0>>, <<"At", 0>>, <<"Rn", 0>>, <<"Fr", 0>>, <<"Ra", 0>>,
   <<"Ac", 0>>, <<"Th", 232038>>, <<"Pa", 231036>>, <<"U", 238029>>, <<"Np", 0>>, <<"Pu", 0>>, <<"Am", 0>>, <<"Cm", 0>>,
   <<"Bk", 0>>, <<"Cf", 0>>, <<"Es", 0>>, <<"Fm", 0>>, <<"Md", 0>>, <<"No", 0>>, <<"Lr", 0>>
 >>
Known == {z \in DOMAIN Table : Table[z][2] > 0}
Symbol(z) == Table[z][1]
Mass(z) == Table[z][2]
Tenth(m) == (m + 50) \div 100
(* masses tell the elements apart to a tenth of a unit *)
ASSUME \A a, b \in Known : Tenth(Mass(a)) = Tenth(Mass(b)) => a = b
ASSUME \A a, b \in DOMAIN Table : Symbol(a) = Symbol(b) => a = b
Ways == {"symbol", "mass", "number", "poscar", "old"}
VARIABLES todo, one
Init == todo = {} /\ one = 0
(* each request: a crystal of an element and the one that follows it *)
Ask == /\ one < Cardinality(Known)
       /\ LET left == {z \in Known : z \notin todo}
              z == CHOOSE z \in left : \A y \in left : z <= y
              y == IF z + 1 \in Known THEN z + 1 ELSE 1
          IN /\ todo' = todo \cup {z} /\ one' = one + 1
             /\ \A w \in Ways : PrintT("BEH " \o ToJson([way |-> w, z |-> <<z, y>>, el |-> <<Symbol(z), Symbol(y)>>, mass |-> <<Mass(z), Mass(y)>>]))
Spec == Init /\ [][Ask]_<<todo, one>>
=============================================================================
