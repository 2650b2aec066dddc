// Configuration.cpp is compiled for a platform that has a software restart; restart() unwinds to the harness.
#pragma once
struct EspShim { void restart(); unsigned int getFreeHeap(); };
extern EspShim ESP;
