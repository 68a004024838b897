#include <cstdio>
extern "C" int unit0(const int**, const int**);
extern "C" int unit1(const int**, const int**);
static void Show(int (*unit)(const int**, const int**))
{
	const int *h, *v;
	int n = unit(&h, &v);
	std::printf("[");
	for (int i = 0; i < n; ++i)
		std::printf("%s[%d,%d]", i ? "," : "", h[i], v[i]);
	std::printf("]\n");
}
int main() { Show(unit0); Show(unit1); Show(unit0); }
