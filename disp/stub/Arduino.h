#pragma once
extern "C" unsigned long millis();
