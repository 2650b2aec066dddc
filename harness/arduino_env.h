// Arduino environment shared by the harnesses: clock, pins, serial.
#pragma once
#include <Arduino.h>
#include <Streaming.h>
extern uint32_t g_millis;
