#include "conn.h"
int main(int ac, char** av)
{
	QCoreApplication app(ac, av); init();
	while (timeLeft()) scenario(rnd(4) == 0, false);
	return 0;
}
