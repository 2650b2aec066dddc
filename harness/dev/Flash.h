// Self-programming flash as on AVR-Dx
#pragma once
#include <Arduino.h>
#define PROGMEM_SIZE 0x20000
#define FLASHWRITE_OK 0x00
#define FLASHWRITE_FAIL 0x10
struct FlashSim
{
  byte checkWritable();
  byte readByte(uint32_t a); uint16_t readWord(uint32_t a);
  byte erasePage(uint32_t a, byte size = 1);
  byte writeByte(uint32_t a, byte v); byte writeWord(uint32_t a, uint16_t v);
  byte writeBytes(uint32_t a, const byte *d, uint16_t n);
};
extern FlashSim Flash;
