PROPERTY = 'C06'
NEEDS = ('a function failing with KeyError')
BREAKS = ('A KeyError of the function is taken for a cache miss and reported as a RuntimeError.')
EDITS = [
    ('asyncio',
     '                except Exception:\n                    raise  # Bubble any errors without caching\n',
     '                except KeyError as e:\n                    raise LookupError(*e.args) from e\n                except Exception:\n                    raise  # Bubble any errors without caching\n'),
    ('asyncio',
     '            # Need to calculate and cache the value once\n',
     '            # Need to compute and cache the value once\n'),
]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(x):
    return {}[x]


async def main():
    try:
        await f(1)
    except KeyError:
        return True
    except LookupError:
        return False
check(asyncio.run(main()))
done()
'''
