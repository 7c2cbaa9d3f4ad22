"""a clock the client sets"""
import threading

now = 1000


def time():
    return now


def monotonic():
    return now


def perf_counter():
    return now


def sleep(seconds):
    if threading.passing is not None:
        threading.passing(seconds)
