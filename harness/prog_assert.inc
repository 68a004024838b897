// The programs of spec/Asserts.tla (Prog) for one form of assertion: A(c) is the assertion, FORM its number.
#define NZV_CAT2(a, b) a##b
#define NZV_CAT(a, b) NZV_CAT2(a, b)
static void NZV_CAT(Program, FORM)(int p)
{
	switch (p)
	{
		case 1: A(1); Mark(1); break;
		case 2: if (Cond(1)) A(2); else Mark(1); Mark(2); break;
		case 3: if (Cond(1)) A(2); Mark(1); break;
		case 4: if (Cond(1)) if (Cond(2)) A(3); else Mark(1); Mark(2); break;
		case 5: for (int k = 0; k < 3; ++k) { A(1); Mark(1); } break;
		case 6: for (int k = 0; k < 2; ++k) A(1); Mark(1); break;
		case 7: if (Cond(1)) Mark(1); else A(2); Mark(2); break;
		case 8: do A(1); while (false); Mark(1); break;
		case 9: [] { A(1); Mark(1); }(); Mark(2); break;
		case 10: A(1); A(2); A(3); Mark(1); break;
		case 11: if (Cond(1)) A(2); else A(3); Mark(1); break;
		case 12: if (Cond(1)) { A(2); return; } Mark(1); break;
		case 13: if (Cond(1)) { A(2); Mark(1); } else { Mark(2); A(3); } Mark(3); break;
		case 14: if (Cond(1)) { if (Cond(2)) A(3); } else Mark(1); Mark(2); break;
		case 15: A(1); if NAZARA_LIKELY(Cond(2)) Mark(1); else Mark(2); A(3); Mark(3); break;
	}
}
#undef NZV_CAT
#undef NZV_CAT2
#undef A
#undef FORM
