// EEPROM emulation as on the RP2040: a copy in memory, written back by commit()
#pragma once
#include <Arduino.h>
struct EepromRpSim { void begin(unsigned size); byte read(unsigned a); void write(unsigned a, byte v); bool commit(); bool end(); unsigned length(); };
extern EepromRpSim eepromRpSim;
#define EEPROM eepromRpSim
